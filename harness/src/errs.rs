//! C05: no provider's error is ever lost.
use crate::tree::*;
use crate::util::*;
use figment::value::{Dict, Map, Value};
use figment::error::{Actual, Kind};
use figment::{Error, Figment, Metadata, Profile, Provider};

#[derive(Clone)]
struct FailP { id: usize, errs: Vec<Error> }
impl Provider for FailP {
    fn metadata(&self) -> Metadata { Metadata::named(format!("p{}", self.id)).source(format!("src{}", self.id)) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Err(chain_of(&self.errs)) }
}
/// a chain that iterates over the given errors in order
fn chain_of(errs: &[Error]) -> Error {
    let mut it = errs.iter().rev();
    let mut e = it.next().unwrap().clone();
    for m in it { e = e.chain(m.clone()); }
    e
}
/// an error saying `m`: of various kinds, with or without a path, a profile and metadata of its own
fn error_of(r: &mut Rng, m: String) -> Error {
    let mut e = match r.below(6) {
        0 => Error::from(Kind::MissingField(m.into())),
        1 => Error::from(Kind::UnknownField(m, &["x", "y"])),
        2 => Error::from(Kind::InvalidType(Actual::Str(m), "a thing".into())),
        3 => Error::from(Kind::Unsupported(Actual::Other(m))),
        _ => Error::from(m),
    };
    for _ in 0..[0, 0, 1, 2, 3][r.below(5)] { e = e.with_path(["a", "b", "a.b", "k.1", "", "a..x", "key", "x"][r.below(8)]); }
    if r.chance(1, 4) { e.profile = Some(Profile::new(["default", "global", "Debug", "x"][r.below(4)])); }
    if r.chance(1, 6) { e.metadata = Some(Metadata::named(["other", "p0", "p1"][r.below(3)])); }
    e
}
fn said(e: &Error) -> String { e.kind.to_string() }

fn odd_key(r: &mut Rng) -> String { match r.below(8) { 0 => "".into(), 1 => r.odd(), 2 => format!("a.{}", r.odd()), 3 => "a..b".into(), 4 => "a.b.key.k1.A.x".into(), n => ["a", "b", "a.b"][n - 5].into() } }
/// a message on one line
fn msg(r: &mut Rng, usual: String) -> String { if r.chance(1, 6) { "the same".into() } else if r.chance(1, 8) { format!("{} {}", r.odd().replace(['\n', '\r'], " "), usual) } else { usual } }
enum K { Good(usize, TP), Bad(usize, Vec<Error>), Fig(Vec<(Op, K)>), Select(String), Focus(String) }

fn show(s: &[(Op, K)]) -> String {
    s.iter().map(|(o, k)| match k {
        K::Good(i, d) => format!("{:?}(p{} {})", o, i, show_p(d)), K::Bad(i, e) => format!("{:?}(p{} fails {:?})", o, i, e.iter().map(|e| (said(e), &e.path, &e.profile)).collect::<Vec<_>>()),
        K::Fig(f) => format!("{:?}(figment[{}])", o, show(f)), K::Select(p) => format!("select({})", p), K::Focus(p) => format!("focus({})", p),
    }).collect::<Vec<_>>().join("; ")
}
fn gen(r: &mut Rng, depth: usize, next: &mut usize) -> Vec<(Op, K)> {
    let n = 1 + r.below(5);
    (0..n).map(|_| {
        let k = match r.below(10) {
            0..=3 => { let id = *next; *next += 1; let m = 1 + if r.chance(1, 3) { r.size(4, 20) } else { 0 }; K::Bad(id, (0..m).map(|i| { let t = msg(r, format!("e{}-{}", id, i)); error_of(r, t) }).collect()) }
            4 if depth > 0 => K::Fig(gen(r, depth - 1, next)),
            5 if depth > 0 => K::Fig(gen(r, depth - 1, next)),
            6 => K::Select(if r.chance(1, 3) { r.odd() } else { ["debug", "Release", "global"][r.below(3)].into() }),
            7 => K::Focus(odd_key(r)),
            _ => { let id = *next; *next += 1; K::Good(id, gen_p(r, 2)) }
        };
        (*r.pick(&OPS), k)
    }).collect()
}
fn build(s: &[(Op, K)], errs: &mut Vec<(String, usize)>) -> Figment {
    let mut f = Figment::new();
    for (op, k) in s {
        f = match k {
            K::Good(id, d) => op.apply(f, TestP { id: *id, data: Ok(d.clone()), sel: None, casing: 0 }),
            K::Bad(id, e) => { errs.extend(e.iter().map(|m| (said(m), *id))); op.apply(f, FailP { id: *id, errs: e.clone() }) }
            K::Fig(i) => { let g = build(i, errs); op.apply(f, g) }
            K::Select(p) => f.select(p.as_str()),
            K::Focus(p) => f.focus(p),
        };
    }
    f
}
fn check_err(c: &mut Ctx, what: &str, e: Error, want: &[(String, usize)]) -> bool {
    let ws = || format!("{:?}", want.iter().map(|(m, i)| format!("{} in p{}", m, i)).collect::<Vec<_>>());
    let n = e.count();
    let text = e.to_string();
    let items: Vec<Error> = e.into_iter().collect();
    let got: Vec<String> = items.iter().map(|e| format!("{} in {}", e.kind, e.metadata.as_ref().map_or("?".into(), |m| m.name.to_string()))).collect();
    let exp: Vec<String> = want.iter().map(|(m, i)| format!("{} in p{}", m, i)).collect();
    if got != exp { return c.check(&format!("{}: errors reported", what), false, ws, || format!("{:?}", got)); }
    if n != want.len() { return c.check(&format!("{}: count()", what), false, || want.len().to_string(), || n.to_string()); }
    let lines: Vec<&str> = text.lines().collect();
    let ok = lines.len() == want.len() && lines.iter().zip(want).all(|(l, (m, i))| l.contains(m.as_str()) && l.ends_with(&format!("p{}", i)));
    if !ok { return c.check(&format!("{}: displayed errors", what), false, ws, || text.clone()); }
    for (i, e) in items.iter().enumerate() {
        if e.count() != 1 { return c.check(&format!("{}: item {} of the iteration is itself a single error", what, i), false, || "1".into(), || e.count().to_string()); }
    }
    true
}
fn check_fig(c: &mut Ctx, f: &Figment, want: &[(String, usize)]) -> bool {
    if want.is_empty() {
        return c.check("no provider failed", f.extract::<Dict>().is_ok() && f.data().is_ok(), || "data".into(), || "error".into());
    }
    let fkey = { let mut r = Rng(c.rng.next()); odd_key(&mut r) };
    let outs: Vec<(&str, Result<String, Error>)> = vec![
        ("extract", f.extract::<Dict>().map(|d| format!("{:?}", d))),
        ("extract_lossy", f.extract_lossy::<Dict>().map(|d| format!("{:?}", d))),
        ("extract_inner", f.extract_inner::<Value>("a").map(|d| format!("{:?}", d))),
        ("extract_inner_lossy", f.extract_inner_lossy::<Value>("a.b").map(|d| format!("{:?}", d))),
        ("find_value", f.find_value("a").map(|d| format!("{:?}", d))),
        ("find_value('')", f.find_value("").map(|d| format!("{:?}", d))),
        ("focus then extract", f.focus("a").extract::<Dict>().map(|d| format!("{:?}", d))),
        ("focus then find_value", f.focus("a.b").find_value("key").map(|d| format!("{:?}", d))),
        ("select then extract", f.clone().select("other").extract::<Dict>().map(|d| format!("{:?}", d))),
        ("focus('') then extract", f.focus("").extract::<Dict>().map(|d| format!("{:?}", d))),
        ("focus then extract_lossy", f.focus(&fkey).extract_lossy::<Dict>().map(|d| format!("{:?}", d))),
        ("focus then extract_inner", f.focus(&fkey).extract_inner_lossy::<Value>(&fkey).map(|d| format!("{:?}", d))),
        ("focus then as a provider", Figment::new().join(f.focus(&fkey)).extract::<Dict>().map(|d| format!("{:?}", d))),
        ("focus then data()", f.focus(&fkey).data().map(|d| format!("{:?}", d))),
        ("extract_inner of an odd key", f.extract_inner::<Value>(&fkey).map(|d| format!("{:?}", d))),
        ("select an odd profile", f.clone().select(fkey.as_str()).extract::<Dict>().map(|d| format!("{:?}", d))),
        ("as a provider", Figment::new().join(f).extract::<Dict>().map(|d| format!("{:?}", d))),
        ("as a provider, merged", Figment::from(("x", 1)).admerge(f).extract::<Dict>().map(|d| format!("{:?}", d))),
    ];
    for (what, o) in outs {
        match o { Err(e) => if !check_err(c, what, e, want) { return false; }, Ok(v) => return c.check(what, false, || "an error".into(), || v.clone()) }
    }
    c.eq("contains", false, f.contains("a")) && c.check("data()", f.data().is_err(), || "an error".into(), || "data".into())
        && c.check("profiles()", f.profiles().count() == 0, || "none".into(), || "some".into())
}

pub fn run(c: &mut Ctx) {
    c.rule("all sequences of up to 4 additions, each failing or succeeding, under every operation, plus random histories with failing providers (single and chained errors), nested figments, selections and focusing; chains of up to 6 errors associated in random ways; non-trivial: at least one provider fails");
    c.exh("all 2^n success/failure patterns of n <= 5 additions x 4 operations");
    for n in 1..=5usize { for mask in 0..(1u32 << n) { for op in OPS {
        let s: Vec<(Op, K)> = (0..n).map(|i| (op, if mask >> i & 1 == 1 { K::Bad(i, vec![Error::from(format!("e{}", i))]) } else { K::Good(i, [("default".to_string(), [("a".to_string(), T::Leaf(0, Leaf::U8(1)))].into_iter().collect())].into_iter().collect()) })).collect();
        c.case(show(&s), mask != 0);
        let mut want = vec![];
        let f = build(&s, &mut want);
        check_fig(c, &f, &want);
        if c.full() { return; }
    } } }
    // chains
    for _ in 0..c.scale(600, 6000) {
        let mut r = Rng(c.rng.next());
        let n = 2 + r.size(6, 30);
        let mut parts: Vec<(Error, Vec<String>)> = (0..n).map(|i| { let m = msg(&mut r, format!("m{}", i)); (Error::from(m.clone()), vec![m]) }).collect();
        let mut desc = vec![];
        while parts.len() > 1 {
            let i = r.below(parts.len());
            let a = parts.remove(i);
            let i = r.below(parts.len());
            let b = parts.remove(i);
            desc.push(format!("{:?}.chain({:?})", a.1, b.1));
            parts.push((a.0.chain(b.0), [b.1, a.1].concat()));
        }
        c.case(desc.join("; "), true);
        let (e, want) = parts.pop().unwrap();
        let (n, text) = (e.count(), e.to_string());
        let got: Vec<String> = e.into_iter().map(|e| e.to_string()).collect();
        c.eq("chained errors", want.clone(), got);
        c.eq("chain count", want.len(), n);
        c.eq("chain display", want.join("\n"), text);
        if c.full() { return; }
    }
    for _ in 0..c.scale(1500, 30000) {
        let mut r = Rng(c.rng.next());
        let mut next = 0;
        let s = gen(&mut r, 2, &mut next);
        let mut want = vec![];
        let f = build(&s, &mut want);
        c.case(show(&s), !want.is_empty());
        check_fig(c, &f, &want);
        if c.full() { return; }
    }
}

//! C14: file providers.
use crate::util::*;
use figment::providers::{Data, Format, Json, Toml, Yaml, YamlExtended};
use figment::value::{Dict, Map, Value};
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::var_os("HARNESS_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("{}-{}", tag, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p.canonicalize().unwrap())
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::env::set_current_dir("/"); let _ = std::fs::remove_dir_all(&self.0); } }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Body { Flat, Nested, Broken, Binary, Odd(usize) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Node { File(Body, u32), Dir, Link(Body, u32), Dangling }

/// contents at the edges of the formats; what they hold is what the format's parser says
const ODD: [&[u8]; 16] = [b"", b" ", b"\n", b"\r\n\r\n", b"# c\n", b"\xef\xbb\xbf", b"\xef\xbb\xbf{\"id\": 1}", b"{}", b"null", b"---\n", b"id = 1\r\n", b"id: 1\r\n", b"id = \"\xff\"\n", b"{\"id\": \"a\xc3(\"}", b"id: a\xffb\n", b"# \x80\n"];
fn parsed(fmt: usize, b: &[u8], profile: &Option<String>) -> Option<Out> {
    fn go<F: Format>(t: &str, profile: &Option<String>) -> Option<Out> {
        match profile {
            Some(p) => F::from_str::<Dict>(t).ok().map(|d| BTreeMap::from([(p.clone(), d.iter().map(|(k, v)| (k.clone(), show(v))).collect())])),
            None => F::from_str::<Map<Profile, Dict>>(t).ok().map(|m| out(&m)),
        }
    }
    let t = std::str::from_utf8(b).ok()?;
    match fmt { 0 => go::<Toml>(t, profile), 1 => go::<Json>(t, profile), 2 => go::<Yaml>(t, profile), _ => go::<YamlExtended>(t, profile) }
}
fn text(fmt: usize, b: Body, n: u32) -> Vec<u8> {
    match (fmt, b) {
        (_, Body::Odd(k)) => ODD[k].to_vec(),
        (_, Body::Binary) => vec![b'i', b'd', 0xff, 0xfe, b'=', b'1'],
        (0, Body::Flat) => format!("id = {}\n[tbl]\nx = [1, 2]\n", n).into_bytes(),
        (0, Body::Nested) => format!("[default]\nid = {}\n[DEBUG]\nid = {}\n", n, n + 1000).into_bytes(),
        (0, Body::Broken) => b"id = = 3\n".to_vec(),
        (1, Body::Flat) => format!("{{\"id\": {}, \"tbl\": {{\"x\": [1, 2]}}}}", n).into_bytes(),
        (1, Body::Nested) => format!("{{\"default\": {{\"id\": {}}}, \"DEBUG\": {{\"id\": {}}}}}", n, n + 1000).into_bytes(),
        (1, Body::Broken) => b"{\"id\": 3".to_vec(),
        (_, Body::Flat) => format!("id: {}\ntbl:\n  x: [1, 2]\n", n).into_bytes(),
        (_, Body::Nested) => format!("default:\n  id: {}\nDEBUG:\n  id: {}\n", n, n + 1000).into_bytes(),
        (_, Body::Broken) => b"id: [1, 2\nx: }".to_vec(),
    }
}
type Out = BTreeMap<String, BTreeMap<String, String>>;
fn flat(n: u32) -> BTreeMap<String, String> { BTreeMap::from([("id".into(), n.to_string()), ("tbl".into(), "{x:[1,2]}".into())]) }
fn body_out(fmt: usize, b: Body, n: u32, profile: &Option<String>) -> Option<Out> {
    match (b, profile) {
        (Body::Odd(k), p) => parsed(fmt, ODD[k], p),
        (Body::Broken, _) | (Body::Binary, _) => None,
        (Body::Flat, Some(p)) => Some(BTreeMap::from([(p.clone(), flat(n))])),
        (Body::Nested, Some(p)) => Some(BTreeMap::from([(p.clone(), BTreeMap::from([("DEBUG".to_string(), format!("{{id:{}}}", n + 1000)), ("default".into(), format!("{{id:{}}}", n))]))])),
        (Body::Flat, None) => None,
        (Body::Nested, None) => Some(BTreeMap::from([("debug".to_string(), BTreeMap::from([("id".to_string(), (n + 1000).to_string())])), ("default".into(), BTreeMap::from([("id".to_string(), n.to_string())]))])),
    }
}
fn show(v: &Value) -> String {
    match v {
        Value::Num(_, n) => n.to_u128().map(|n| n.to_string()).or_else(|| n.to_i128().map(|n| n.to_string())).unwrap_or("?".into()),
        Value::Dict(_, d) => format!("{{{}}}", d.iter().map(|(k, v)| format!("{}:{}", k, show(v))).collect::<Vec<_>>().join(",")),
        Value::Array(_, a) => format!("[{}]", a.iter().map(show).collect::<Vec<_>>().join(",")),
        v => format!("{:?}", v),
    }
}
fn out(m: &Map<Profile, Dict>) -> Out { m.iter().map(|(p, d)| (p.as_str().as_str().to_ascii_lowercase(), d.iter().map(|(k, v)| (k.clone(), show(v))).collect())).collect() }

#[derive(Clone, Debug)]
enum Call { Nested, Required(bool), Search(bool), Profile(String) }
type Got = (Metadata, Result<Map<Profile, Dict>, Error>, Figment);
fn build<F: Format>(path: Option<&Path>, string: &str, calls: &[Call]) -> Got where F: 'static {
    let mut d: Data<F> = match path { Some(p) => F::file(p), None => F::string(string) };
    for c in calls { d = match c { Call::Nested => d.nested(), Call::Required(b) => d.required(*b), Call::Search(b) => d.search(*b), Call::Profile(p) => d.profile(p.as_str()) }; }
    (d.metadata(), d.data(), Figment::new().merge(d))
}
fn make(fmt: usize, path: Option<&Path>, s: &str, calls: &[Call]) -> Got {
    match fmt { 0 => build::<Toml>(path, s, calls), 1 => build::<Json>(path, s, calls), 2 => build::<Yaml>(path, s, calls), _ => build::<YamlExtended>(path, s, calls) }
}
/// a string source holds exactly what its text parses to, whatever the text and the order of the calls
fn strings<F: Format>(c: &mut Ctx, r: &mut Rng) where F: 'static {
    const T: [&str; 22] = ["", " ", "\n", "\t\n ", "#c", "# c\n", "---", "--- ", "null", "~", "{}", "[]", "{ }", "true", "1", "x", "\"\"", "a: 1", "a = 1", "{\"a\": 1}", "\u{feff}a: 1", "a: {}"];
    let t = if r.chance(1, 4) { r.odd_text() } else { let (a, b) = (*r.pick(&T), *r.pick(&T)); if r.chance(1, 3) { format!("{}{}", a, b) } else { a.to_string() } };
    let (early, late, profile) = (r.chance(1, 3), r.chance(1, 2), if r.chance(1, 2) { Some(if r.chance(1, 3) { r.odd_text() } else { "debug".into() }) } else { None });
    let required = r.below(3);
    let mut d: Data<F> = F::string(&t);
    if early { d = d.nested(); }
    if required > 0 { d = d.required(required == 1); }
    if let Some(p) = &profile { d = d.profile(p.as_str()); }
    if late { d = d.nested(); }
    let nested = late || (early && profile.is_none());
    c.case(format!("{} string {:?} nested {} {} required {} profile {:?}", F::NAME, t, early, late, required, profile), true);
    let want: Result<BTreeMap<String, Dict>, String> = if nested { F::from_str::<BTreeMap<String, Dict>>(&t).map_err(|e| e.to_string()) }
        else { F::from_str::<Dict>(&t).map(|d| BTreeMap::from([(profile.clone().unwrap_or("default".into()), d)])).map_err(|e| e.to_string()) };
    let got = match guard(c, "string provider", || d.data()) { Some(g) => g, None => return };
    let key = |s: &str| s.to_ascii_lowercase();
    let same = match (&want, &got) {
        (Err(_), Err(_)) => true,
        (Ok(w), Ok(g)) => { let names: std::collections::BTreeSet<String> = w.keys().map(|k| key(k)).collect(); names.len() != w.len() || (g.len() == w.len() && w.iter().all(|(p, d)| g.iter().any(|(q, e)| key(q.as_str().as_str()) == key(p) && e == d))) }
        _ => false,
    };
    c.check("string source", same, || format!("{:?}", want), || format!("{:?}", got));
    let md = d.metadata();
    c.check("string source metadata", md.source.as_ref().map_or(true, |s| s.file_path().is_none()), || "no file".into(), || format!("{:?}", md.source));
}

/// `.` and `..` removed, lexically (no directory of the layout is a link)
fn norm(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() { match c { std::path::Component::CurDir => {} std::path::Component::ParentDir => { o.pop(); } c => o.push(c.as_os_str()) } }
    o
}

pub fn run(c: &mut Ctx) {
    c.rule("a scratch directory tree 1..5 levels deep with regular files, directories, links and dangling links of two names at random levels (flat, nested, malformed or binary content in TOML, JSON, YAML); a random working directory inside, an absolute or relative path with or without directory, `.` and `..` components, and 0..5 builder calls in any order; the data, the failure, and the source in the metadata are compared with a direct model; non-trivial: some candidate exists");
    let home = std::env::current_dir().ok();
    c.rule("string sources with empty, blank, comment-only and scalar texts and the builder calls in any order, against the format's own parser");
    for _ in 0..c.scale(3000, 60000) {
        let mut r = Rng(c.rng.next());
        match r.below(4) { 0 => strings::<Toml>(c, &mut r), 1 => strings::<Json>(c, &mut r), 2 => strings::<Yaml>(c, &mut r), _ => strings::<YamlExtended>(c, &mut r) }
        if c.full() { break; }
    }
    for round in 0..c.scale(500, 8000) {
        let mut r = Rng(c.rng.next());
        let s = Scratch::new("files");
        let depth = 1 + r.below(5);
        // vary the level names so that `..` and sub paths are meaningful
        let mut levels = vec![s.0.clone()];
        for i in 0..depth { let p = levels[i].join(["lv", "sub", "x y"][r.below(3)]); levels.push(p); }
        for l in &levels { std::fs::create_dir_all(l).unwrap(); }
        let fmt = r.below(4);
        let names = ["zz_figment_cfg".to_string(), if r.chance(1, 3) { format!("zz_{}", r.odd_name()) } else { "zz_other.toml".to_string() }];
        let names: [&str; 2] = [&names[0], &names[1]];
        let mut nodes: BTreeMap<PathBuf, Node> = BTreeMap::new();
        let mut id = 0;
        for l in &levels {
            for sub in ["", "conf"] {
                let dir = if sub.is_empty() { l.clone() } else { l.join(sub) };
                if !sub.is_empty() { if r.chance(1, 2) { continue; } std::fs::create_dir_all(&dir).unwrap(); }
                for n in names {
                    if r.chance(1, 2) { continue; }
                    id += 1;
                    let b = match r.below(12) { 0 => Body::Broken, 1 => Body::Binary, 10 | 11 => Body::Odd(r.below(ODD.len())), 2..=4 => Body::Nested, _ => Body::Flat };
                    let p = dir.join(n);
                    let node = match r.below(9) { 0 | 1 => Node::Dir, 2 => Node::Link(b, id), 3 => Node::Dangling, _ => Node::File(b, id) };
                    match node {
                        Node::File(b, n) => std::fs::write(&p, text(fmt, b, n)).unwrap(),
                        Node::Dir => std::fs::create_dir_all(&p).unwrap(),
                        Node::Link(b, n) => { let t = s.0.join(format!("target{}", n)); std::fs::write(&t, text(fmt, b, n)).unwrap(); std::os::unix::fs::symlink(&t, &p).unwrap(); }
                        Node::Dangling => std::os::unix::fs::symlink(s.0.join("absent"), &p).unwrap(),
                    }
                    nodes.insert(p, node);
                }
            }
        }
        for k in 0..12 {
            let cwd = r.pick(&levels).clone();
            std::env::set_current_dir(&cwd).unwrap();
            let n = *r.pick(&names);
            let rel: PathBuf = match r.below(9) { 0 => format!("./{}", n).into(), 1 => format!("conf/{}", n).into(), 2 => format!("../{}", n).into(), 3 => format!("conf/../{}", n).into(), 4 => format!("conf/./{}", n).into(), 5 => format!("absent/{}", n).into(), _ => n.into() };
            let path = if r.chance(1, 4) { r.pick(&levels).join(&rel) } else { rel };
            let ncalls = r.below(6);
            let calls: Vec<Call> = (0..ncalls).map(|_| match r.below(6) { 0 => Call::Nested, 1 => Call::Required(r.chance(2, 3)), 2 | 3 => Call::Search(r.chance(1, 2)), 4 => Call::Profile(if r.chance(1, 6) { r.odd_text() } else { r.pick(&["debug", "GLOBAL", "Default", "custom"]).to_string() }), _ => Call::Nested }).collect();
            // ---- model
            let (mut required, mut search, mut profile) = (false, true, Some("default".to_string()));
            for x in &calls { match x { Call::Nested => profile = None, Call::Required(b) => required = *b, Call::Search(b) => search = *b, Call::Profile(p) => profile = Some(p.to_ascii_lowercase()) } }
            let cands: Vec<PathBuf> = if path.is_absolute() || !search { vec![cwd.join(&path)] } else { cwd.ancestors().map(|a| a.join(&path)).collect() };
            // a directory that does not exist cannot be walked through with `..`
            let exists = |p: &Path| -> bool { let mut q = PathBuf::new(); for c in p.components() { if c == std::path::Component::ParentDir && !q.is_dir() { return false; } if c == std::path::Component::ParentDir { q.pop(); } else if c != std::path::Component::CurDir { q.push(c.as_os_str()); } } true };
            let hit = cands.iter().find_map(|p| match nodes.get(&norm(p)) { Some(Node::File(b, n)) | Some(Node::Link(b, n)) if exists(p) => Some((norm(p), *b, *n)), _ => None });
            let want: Result<Out, &str> = match &hit { Some((_, b, n)) => body_out(fmt, *b, *n, &profile).ok_or("unreadable or malformed"), None if required => Err("required"), None => Ok(Out::new()) };
            c.case(format!("round {} cwd {:?} path {:?} format {} calls {:?} layout {:?}", round * 100 + k, cwd.strip_prefix(&s.0).unwrap(), path, fmt, calls, nodes.iter().map(|(p, n)| (p.strip_prefix(&s.0).unwrap().display().to_string(), *n)).collect::<Vec<_>>()), cands.iter().any(|p| nodes.contains_key(&norm(p))));
            let (md, data, f) = match guard(c, "provider", || make(fmt, Some(&path), "", &calls)) { Some(x) => x, None => continue };
            c.check("data", match (&want, &data) { (Ok(w), Ok(d)) => *w == out(d), (Err(_), Err(_)) => true, _ => false }, || format!("{:?} from {:?}", want, hit), || format!("{:?}", data.as_ref().map(out)));
            let src = md.source.as_ref().and_then(|s| s.file_path()).map(|p| p.to_path_buf());
            match &hit {
                Some((p, ..)) => { c.check("source metadata names the file read", src.as_ref().map_or(false, |q| norm(&cwd.join(q)) == *p && q.exists()), || format!("{:?}", p), || format!("{:?}", md.source)); }
                None => { c.check("source metadata of a missing file", src.as_deref() == Some(&*path), || format!("{:?}", path), || format!("{:?}", md.source)); }
            }
            c.check("metadata name", md.name == format!("{} file", ["TOML", "JSON", "YAML", "YAML Extended"][fmt]), || "format name".into(), || md.name.to_string());
            // the same through a figment
            for p in ["default", "debug", "custom"] {
                let g = f.clone().select(p).extract::<Dict>();
                match (&want, &g) {
                    (Err(_), Err(e)) => { c.check("the failure is attributed", e.metadata.as_ref().map_or(false, |m| m.source == md.source), || format!("{:?}", md.source), || format!("{:?}", e.metadata)); }
                    (Ok(w), Ok(d)) => {
                        let mut e: BTreeMap<String, String> = w.get("default").cloned().unwrap_or_default();
                        if p != "default" { e.extend(w.get(p).cloned().unwrap_or_default()); }
                        e.extend(w.get("global").cloned().unwrap_or_default());
                        let got: BTreeMap<String, String> = d.iter().map(|(k, v)| (k.clone(), show(v))).collect();
                        c.eq(&format!("extracted with profile {}", p), e, got);
                        for (k, v) in d { c.check(&format!("source of {}", k), f.get_metadata(v.tag()).and_then(|m| m.source.clone()) == md.source && matches!(md.source, Some(Source::File(_))), || format!("{:?}", md.source), || format!("{:?}", f.get_metadata(v.tag()))); }
                    }
                    _ => { c.check(&format!("extract with profile {}", p), false, || format!("{:?}", want), || format!("{:?}", g)); }
                }
            }
            // the same text as a string source
            if let Some((_, b, n)) = hit { if let Ok(t) = String::from_utf8(text(fmt, b, n)) {
                if let Some((md, data, _)) = guard(c, "string provider", || make(fmt, None, &t, &calls)) {
                    let w = body_out(fmt, b, n, &profile);
                    c.check("string source", match (&w, &data) { (Some(w), Ok(d)) => *w == out(d), (None, Err(_)) => true, _ => false }, || format!("{:?}", w), || format!("{:?}", data.as_ref().map(out)));
                    c.check("string source metadata", md.source.as_ref().and_then(|s| s.file_path()).is_none(), || "no file".into(), || format!("{:?}", md.source));
                }
            } }
            if c.full() { break; }
        }
        let _ = std::env::set_current_dir("/");
        if c.full() { break; }
    }
    if let Some(h) = home { let _ = std::env::set_current_dir(h); }
}

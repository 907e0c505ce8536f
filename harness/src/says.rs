//! C22: what a displayed error says.
use crate::files::Scratch;
use crate::util::*;
use figment::error::{Actual, Kind, OneOf};
use figment::providers::{Env, Format, Json, Serialized, Toml, Yaml};
use figment::{Error, Figment, Metadata, Profile, Provider, Source};
use std::path::{Component, Path, PathBuf};

fn actual(r: &mut Rng) -> (Actual, String) {
    let u = ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128);
    let u = r.odd_int().filter(|_| r.0 % 3 == 0).unwrap_or(u);
    let t = r.odd_text();
    match r.below(18) {
        0 => { let b = r.chance(1, 2); (Actual::Bool(b), format!("bool {}", b)) }
        1 => (Actual::Unsigned(u), format!("unsigned int `{}`", u)),
        2 => { let i = (u as i128).wrapping_neg(); (Actual::Signed(i), format!("signed int `{}`", i)) }
        3 => { let f = *r.pick(&[0.0, -0.0, 1.5, -3.0, 1e300, 1e-7, f64::INFINITY, f64::NEG_INFINITY, 1e16, 123456789.125]); (Actual::Float(f), format!("float `{}`", f)) }
        4 => { let c = r.odd_char(); (Actual::Char(c), format!("char {:?}", c)) }
        5 => (Actual::Str(t.clone()), format!("string {:?}", t)),
        6 => { let n = r.size(4, 40); let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect(); (Actual::Bytes(b.clone()), format!("bytes {:?}", b)) }
        7 => (Actual::Unit, "unit".into()), 8 => (Actual::Option, "option".into()), 9 => (Actual::NewtypeStruct, "new-type struct".into()), 10 => (Actual::Seq, "sequence".into()),
        11 => (Actual::Map, "map".into()), 12 => (Actual::Enum, "enum".into()), 13 => (Actual::UnitVariant, "unit variant".into()), 14 => (Actual::NewtypeVariant, "new-type variant".into()),
        15 => (Actual::TupleVariant, "tuple variant".into()), 16 => (Actual::StructVariant, "struct variant".into()), _ => (Actual::Other(t.clone()), t),
    }
}
fn names(r: &mut Rng) -> &'static [&'static str] {
    let n = r.size(7, 40);
    let v: Vec<&'static str> = (0..n).map(|_| &*Box::leak(r.odd_text().into_boxed_str())).collect();
    Box::leak(v.into_boxed_slice())
}
fn alternatives(l: &[&str]) -> String {
    let q: Vec<String> = l.iter().map(|s| format!("`{}`", s)).collect();
    match q.len() { 0 => "none".into(), 1 => q[0].clone(), 2 => q.join(" or "), _ => format!("one of {}", q.join(", ")) }
}
fn kind(r: &mut Rng) -> (Kind, String) {
    let (a, at) = actual(r);
    let t = r.odd_text();
    let e = r.odd_text();
    let n = match r.odd_int() { Some(n) if r.chance(1, 4) => n as usize, _ => (r.next() >> r.below(64)) as usize };
    match r.below(12) {
        0 => (Kind::Message(t.clone()), t),
        1 => (Kind::InvalidType(a, e.clone()), format!("invalid type: found {}, expected {}", at, e)),
        2 => (Kind::InvalidValue(a, e.clone()), format!("invalid value {}, expected {}", at, e)),
        3 => (Kind::InvalidLength(n, e.clone()), format!("invalid length {}, expected {}", n, e)),
        4 => { let l = names(r); (Kind::UnknownVariant(t.clone(), l), format!("unknown variant: found `{}`, expected `{}`", t, alternatives(l))) }
        5 => { let l = names(r); (Kind::UnknownField(t.clone(), l), format!("unknown field: found `{}`, expected `{}`", t, alternatives(l))) }
        6 => (Kind::MissingField(t.clone().into()), format!("missing field `{}`", t)),
        7 => { let s: &'static str = Box::leak(t.into_boxed_str()); (Kind::DuplicateField(s), format!("duplicate field `{}`", s)) }
        8 => { let i = n as isize; (Kind::ISizeOutOfRange(i), format!("signed integer `{}` is out of range", i)) }
        9 => (Kind::USizeOutOfRange(n), format!("unsigned integer `{}` is out of range", n)),
        10 => (Kind::Unsupported(a), format!("unsupported type `{}`", at)),
        _ => (Kind::UnsupportedKey(a, e.clone().into()), format!("unsupported type `{}` for key: must be `{}`", at, e)),
    }
}
/// where a path leads, as text
fn lexical(p: &Path) -> Vec<Component<'_>> {
    let mut out: Vec<Component> = vec![];
    for c in p.components() {
        match c {
            Component::CurDir => {}
            Component::ParentDir => match out.last() { Some(Component::Normal(_)) => { out.pop(); } Some(Component::RootDir) => {} _ => out.push(c) },
            c => out.push(c),
        }
    }
    out
}
/// a file is shown by its own path, or by a shorter one from the working directory
fn file_text(cwd: &Path, p: &Path) -> Vec<String> {
    let own = p.display().to_string();
    let plain = p.components().all(|c| matches!(c, Component::RootDir | Component::Normal(_)));
    if !p.is_absolute() || !plain { return vec![own]; }
    let (a, b): (Vec<_>, Vec<_>) = (p.components().collect(), cwd.components().collect());
    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let rel: PathBuf = std::iter::repeat(Component::ParentDir).take(b.len() - k).chain(a[k..].iter().copied()).collect();
    if rel.components().count() < a.len() { vec![rel.display().to_string()] } else { vec![own] }
}
fn paths(c: &mut Ctx, base: &Path) {
    let mut dirs = vec![base.to_path_buf()];
    for d in ["w", "w/x", "w/x/y", "aa", "é b"] { std::fs::create_dir_all(base.join(d)).unwrap(); dirs.push(base.join(d)); }
    for _ in 0..c.scale(2000, 40000) {
        let mut r = Rng(c.rng.next());
        let cwd = r.pick(&dirs).clone();
        std::env::set_current_dir(&cwd).unwrap();
        let mut p = match r.below(6) { 0 => PathBuf::new(), 1 => PathBuf::from("/"), 2 => cwd.clone(), _ => { let mut q = r.pick(&dirs).clone(); for _ in 0..r.below(3) { q.pop(); } q } };
        for _ in 0..r.below(5) { let odd = r.odd_name(); p.push(*r.pick(&["a", "w", "x", "y", "App.toml", "é", "..", "aa", &odd])); }
        let text = p.display().to_string();
        c.case(format!("the file {:?} from {:?}", text, cwd), p.is_absolute());
        if text.is_empty() { continue; }
        let got = match guard(c, "display", || Source::from(p.as_path()).to_string()) { Some(g) => g, None => continue };
        let leads = lexical(&cwd.join(&got)) == lexical(&cwd.join(&p));
        c.check("the path shown leads to the file", leads, || text.clone(), || got.clone());
        c.check("the path shown is its own or a shorter one", got == text || (Path::new(&got).is_relative() && Path::new(&got).components().count() < p.components().count()), || text.clone(), || got.clone());
        if p.components().all(|c| matches!(c, Component::RootDir | Component::Normal(_))) { c.check("the path shown", file_text(&cwd, &p).contains(&got), || file_text(&cwd, &p)[0].clone(), || got.clone()); }
        if c.full() { break; }
    }
    std::env::set_current_dir("/").unwrap();
}
fn wrong(f: &Figment, key: &str) -> Result<u8, Error> { f.extract_inner::<u8>(key) }
/// one wrong value, reported by each kind of provider
fn providers(c: &mut Ctx, base: &Path) {
    std::env::set_current_dir(base).unwrap();
    let keep: Vec<_> = std::env::vars_os().collect();
    for _ in 0..c.scale(1500, 20000) {
        let mut r = Rng(c.rng.next());
        let n = 1 + r.size(3, 12);
        let key: Vec<String> = (0..n).map(|_| loop { let k = r.odd_name().replace('.', ""); let k = if r.chance(1, 2) { (*r.pick(&["a", "port", "Db", "x9", "é", "ß"])).to_string() } else { k }; if k.trim() == k && !k.is_empty() { break k; } }).collect();
        let dotted = key.join(".");
        let prof = *r.pick(&["default", "global", "Debug", "x Y"]);
        let shown_prof = match prof { "default" | "global" => prof.to_string(), p => p.to_string() };
        let ending = match r.below(6) {
            0 => {
                // the environment: upper case, dots
                let prefix = if r.chance(1, 3) { None } else { Some(r.pick(&["APP_", "app", "É_", "", "x-y_"]).to_string()) };
                let low = dotted.to_ascii_lowercase();
                for (k, _) in std::env::vars_os() { std::env::remove_var(k); }
                std::env::set_var(format!("{}{}", prefix.clone().unwrap_or_default(), low), "true");
                let e = match &prefix { None => Env::raw(), Some(p) => Env::prefixed(p) };
                let md = e.metadata();
                let f = Figment::from(e.profile(prof)).select(prof);
                let name = match &prefix { None => "environment variable(s)".to_string(), Some(p) => format!("`{}` environment variable(s)", p.to_ascii_uppercase()) };
                c.case(format!("environment {:?} {:?}", prefix, low), true);
                c.eq("the provider's name", name.clone(), md.name.to_string());
                c.eq("a key in its notation", dotted.to_ascii_uppercase(), md.interpolate(&Profile::new(prof), &key));
                let r = wrong(&f, &low);
                for (k, _) in std::env::vars_os() { std::env::remove_var(k); }
                (r, format!(" for key {:?} in {}", dotted.to_ascii_uppercase(), name))
            }
            1 => {
                let loc = std::panic::Location::caller();
                let (line, s) = (line!(), Serialized::default(&dotted, true));
                let _ = loc;
                let f = Figment::from(s.profile(prof)).select(prof);
                c.case(format!("a value at {:?} in {:?}", dotted, prof), true);
                let got = f.metadata().next().cloned();
                let ok = got.as_ref().map_or(false, |m| matches!(&m.source, Some(Source::Code(l)) if l.file() == file!() && l.line() == line));
                c.check("the value's source", ok, || format!("{}:{}", file!(), line), || format!("{:?}", got));
                let col = got.as_ref().and_then(|m| m.source.as_ref()).and_then(|s| s.code_location()).map_or(0, |l| l.column());
                (wrong(&f, &dotted), format!(" for key {:?} in {}:{}:{} bool", format!("{}.{}", shown_prof, dotted), file!(), line, col))
            }
            2 | 3 => {
                let k = r.below(3);
                let file = base.join(["f.toml", "sub.json", "é.yaml"][k]);
                let mut body = "true".to_string();
                for k in key.iter().rev() { body = format!("{{{}: {}}}", serde_json::to_string(k).unwrap(), body); }
                // JSON is YAML; TOML only for plain keys
                let text = if k == 0 { key.iter().rev().fold("true".to_string(), |b, k| format!("{{{}={}}}", serde_json::to_string(k).unwrap(), b)) } else { body };
                let text = if k == 0 { format!("{}={}", serde_json::to_string(&key[0]).unwrap(), &text[text.find('=').map_or(0, |_| 1)..text.len() - 1][serde_json::to_string(&key[0]).unwrap().len() + 1..]) } else { text };
                std::fs::write(&file, &text).unwrap();
                let at = file.display().to_string();
                let f = match k { 0 => Figment::from(Toml::file(&at).profile(prof)), 1 => Figment::from(Json::file(&at).profile(prof)), _ => Figment::from(Yaml::file(&at).profile(prof)) };
                c.case(format!("{} with {:?} in {:?}", at, text, prof), true);
                let rel = file.file_name().unwrap().to_str().unwrap();
                let f = f.select(prof);
                if f.find_value(&dotted).is_err() { continue; }
                (wrong(&f, &dotted), format!(" for key {:?} in {} {} file", format!("{}.{}", shown_prof, dotted), rel, ["TOML", "JSON", "YAML"][k]))
            }
            4 => {
                // a provider of one's own
                let (sep, name, src) = (r.odd_text(), r.odd_text(), r.odd_text());
                let with = r.chance(1, 2);
                let spell = r.chance(2, 3);
                let sep2 = sep.clone();
                let mut md = Metadata::named(name.clone());
                let first = r.chance(1, 2);
                if spell && first { let s = sep.clone(); md = md.interpolater(move |p: &Profile, k: &[&str]| format!("<{}>{}", p, k.join(&s))); }
                if with { md = md.source(src.clone()); }
                if spell && !first { md = md.interpolater(move |p: &Profile, k: &[&str]| format!("<{}>{}", p, k.join(&sep))); }
                let f = Figment::from(Own(md, prof, figment::util::nest(&dotted, true.into()))).select(prof);
                c.case(format!("a provider named {:?} source {:?} separator {:?} key {:?}", name, with.then(|| &src), sep2, dotted), true);
                let k = if spell { format!("<{}>{}", shown_prof, key.join(&sep2)) } else { format!("{}.{}", shown_prof, dotted) };
                (wrong(&f, &dotted), if with { format!(" for key {:?} in {} {}", k, src, name) } else { format!(" for key {:?} in {}", k, name) })
            }
            _ => {
                // an error put together by hand
                let (k, kt) = kind(&mut r);
                let md = Metadata::named("N").interpolater(|p: &Profile, k: &[&str]| format!("{}|{}", p, k.join("|")));
                let (hm, hp, n) = (r.chance(3, 4), r.chance(3, 4), r.below(4));
                let path: Vec<String> = (0..n).map(|_| r.odd_text()).collect();
                let mut e = Error::from(k);
                if hm { e.metadata = Some(md); }
                if hp { e.profile = Some(Profile::new(prof)); }
                e.path = path.clone();
                let mut want = kt;
                if hm && hp && n > 0 { want += &format!(" for key {:?}", format!("{}|{}", prof, path.join("|"))); }
                if hm { want += " in N"; }
                c.case(format!("an error of kind {:?} at {:?}", e.kind, path), true);
                c.eq("the message", want, e.to_string());
                continue;
            }
        };
        let (res, end) = ending;
        let want = format!("invalid type: found bool true, expected u8{}", end);
        c.check("the message", matches!(&res, Err(e) if e.to_string() == want), || want.clone(), || match &res { Ok(v) => format!("accepted as {}", v), Err(e) => e.to_string() });
        if c.full() { break; }
    }
    for (k, v) in keep { std::env::set_var(k, v); }
    std::env::set_current_dir("/").unwrap();
}
/// how keys and providers are named, without an error
fn notation(c: &mut Ctx, base: &Path) {
    for _ in 0..c.scale(4000, 60000) {
        let mut r = Rng(c.rng.next());
        let n = r.size(4, 12);
        let keys: Vec<String> = (0..n).map(|_| match r.below(5) { 0 => String::new(), 1 => r.odd_text(), 2 => (*r.pick(&["a.b", ".", "0", "-1", " ", "_", "__", "A", "ß", "é"])).to_string(), _ => r.odd_name() }).collect();
        let prof = match r.below(4) { 0 => Profile::Default, 1 => Profile::Global, 2 => Profile::new(&r.odd_text()), _ => Profile::new("Debug") };
        let text = r.odd_text();
        c.case(format!("the keys {:?} in {:?} for a provider named {:?}", keys, prof, text), true);
        let shown = format!("{}.{}", prof.as_str(), keys.join("."));
        for md in [Metadata::named(text.clone()), Metadata::from(text.clone(), "s"), Json::string(&text).metadata(), Serialized::default("k", 1).metadata(), Metadata::named("x").source(Path::new("/x"))] {
            c.eq("a key's default notation", shown.clone(), md.interpolate(&prof, &keys));
        }
        c.eq("the name given", text.clone(), Metadata::named(text.clone()).name.to_string());
        c.eq("the name of a string's source", vec!["JSON source string", "TOML source string", "YAML source string"], vec![&*Json::string(&text).metadata().name, &*Toml::string(&text).metadata().name, &*Yaml::string(&text).metadata().name]);
        let prefix = { let n = r.below(4); let mut p = if r.chance(1, 2) { r.odd_name() } else { r.odd_text() }; for _ in 0..n { p.push_str(*r.pick(&["_", "__", ".", "app", " ", "-", "é", "ß", "`"])); } p };
        let variables = |p: Option<&str>, md: Metadata, c: &mut Ctx| {
            let want = match p { None => "environment variable(s)".to_string(), Some(p) => format!("`{}` environment variable(s)", p.to_ascii_uppercase()) };
            c.eq("the name for variables", want, md.name.to_string());
            c.check("variables have no source", md.source.is_none(), || "none".into(), || format!("{:?}", md.source));
            c.eq("a variable's notation", keys.iter().map(|k| k.to_ascii_uppercase()).collect::<Vec<_>>().join("."), md.interpolate(&prof, &keys));
        };
        variables(None, Env::raw().metadata(), c);
        variables(Some(&prefix), Env::prefixed(&prefix).metadata(), c);
        variables(Some(&prefix), Env::prefixed(&prefix).split("_").ignore(&["a"]).profile("p").metadata(), c);
        if c.full() { return; }
    }
    // files by where they are found
    let mut dirs = vec![base.join("n")];
    for d in ["a", "b.d", "é", "c"] { let d = dirs.last().unwrap().join(d); dirs.push(d); }
    std::fs::create_dir_all(dirs.last().unwrap()).unwrap();
    for _ in 0..c.scale(1500, 20000) {
        let mut r = Rng(c.rng.next());
        let name = match r.below(4) { 0 => r.odd_name().replace(|c: char| c == '/' || c == '\0', "x"), 1 => "plain".to_string(), 2 => ".hidden".to_string(), _ => "App.toml".to_string() };
        if name.is_empty() || name == "." || name == ".." || name.len() > 200 { continue; }
        let (at, cwd) = (r.below(dirs.len()), r.below(dirs.len()));
        let there = dirs[at].join(&name);
        if there.exists() { continue; }
        let sub = r.chance(1, 6);
        let asked = if sub && at > 0 { Path::new(dirs[at].file_name().unwrap()).join(&name) } else { PathBuf::from(&name) };
        let from = if sub && at > 0 { at - 1 } else { at };
        if std::fs::write(&there, "").is_err() { continue; }
        std::env::set_current_dir(&dirs[cwd]).unwrap();
        let (near, far) = (cwd == from, cwd >= from);
        let exact = r.chance(1, 4);
        let md = if exact { Toml::file_exact(&asked).metadata() } else { Toml::file(&asked).metadata() };
        c.case(format!("the file {:?} asked for as {:?} from {:?}, search {}", there, asked, dirs[cwd], !exact), true);
        c.eq("a file's kind", "TOML file".to_string(), md.name.to_string());
        let found = if exact { near } else { far };
        let src = md.source.as_ref().and_then(|s| s.file_path()).map(|p| p.to_path_buf());
        if !found { c.check("a file not found is named as asked for", src.as_ref() == Some(&asked), || format!("{:?}", asked), || format!("{:?}", src)); }
        else { c.check("the file named is the one found", src.as_ref().map_or(false, |p| dirs[cwd].join(p) == there), || format!("{:?}", there), || format!("{:?}", src)); }
        std::fs::remove_file(&there).unwrap();
        if c.full() { break; }
    }
    std::env::set_current_dir("/").unwrap();
}
/// the code location a value provider was made at
fn made(c: &mut Ctx) {
    let of = |m: Metadata| match m.source { Some(Source::Code(l)) => (l.file().to_string(), l.line()), s => (format!("{:?}", s), 0) };
    let v = [("k", 1)].into_iter().collect::<std::collections::BTreeMap<_, _>>();
    c.case("where value providers are made", true);
    let all = [
        (line!(), Serialized::default("k", 1).metadata()), (line!(), Serialized::global("k", 1).metadata()),
        (line!(), Serialized::from(1, "p").metadata()), (line!(), Serialized::from(1, "p").key("a").profile("q").metadata()),
        (line!(), Serialized::default("k", 1).key("a.b").profile(Profile::Global).metadata()),
    ];
    for (line, m) in all { c.eq("the place", (file!().to_string(), line), of(m)); }
    let all = [
        (line!(), Serialized::defaults(v.clone()).metadata()),
        (line!(), Serialized::globals(v.clone()).metadata()),
        (line!(), (&Serialized::globals(v.clone()).profile("x")).metadata()),
    ];
    for (line, m) in all { c.eq("the place", (file!().to_string(), line), of(m)); }
    // the types named
    use std::any::type_name as t;
    fn pair<K: AsRef<str> + Clone, V: serde::Serialize + Clone>(c: &mut Ctx, k: K, v: V) {
        c.eq("the pair's types", format!("({}, {})", t::<K>(), t::<V>()), (k.clone(), v.clone()).metadata().name.into_owned());
        c.eq("the value's type", t::<V>().to_string(), Serialized::default("k", v.clone()).metadata().name.into_owned());
        c.eq("the value's type, by reference", format!("&{}", t::<V>()), Serialized::defaults(&v).metadata().name.into_owned());
        c.eq("of a pair added to a figment", Some(format!("({}, {})", t::<K>(), t::<V>())), Figment::from((k, v)).metadata().next().map(|m| m.name.to_string()));
    }
    let (one, word) = (1u8, String::from("w"));
    pair(c, "k", 1); pair(c, word.clone(), &one); pair(c, &word, &&one); pair(c, "k", vec![Some(1.5)]); pair(c, Box::<str>::from("k"), std::collections::BTreeMap::<String, &str>::new());
    pair(c, &&word, (1u8, "a", [true; 3])); pair(c, "k", Profile::Default); pair(c, "k", &figment::value::Value::from(1)); pair(c, "k", ()); pair(c, "k", &"a"); pair(c, "k", Vec::<std::path::PathBuf>::new());
    // through a figment, a focus and a further figment
    let (line, s) = (line!(), Serialized::default("a.b", 1));
    let f = Figment::from(Figment::from(s).focus("a"));
    let got: Vec<_> = f.metadata().filter(|m| m.source.as_ref().map_or(false, |s| s.code_location().is_some())).cloned().map(of).collect();
    c.check("the place survives", got.contains(&(file!().to_string(), line)), || format!("line {}", line), || format!("{:?}", got));
}
struct Own(Metadata, &'static str, figment::value::Value);
impl Provider for Own {
    fn metadata(&self) -> Metadata { self.0.clone() }
    fn data(&self) -> Result<figment::value::Map<Profile, figment::value::Dict>, Error> { Ok(Profile::new(self.1).collect(self.2.clone().into_dict().unwrap())) }
}
pub fn run(c: &mut Ctx) {
    c.rule("random error kinds with odd texts, numbers and lists of 0..40 alternatives against a reference message; keys with empty and odd components and odd prefixes against the notation they must be shown in; files by name where they are found from the working directory upwards; files at and around the working directory, absolute and relative, against the path they must be shown by; a wrong value from each kind of provider (environment with and without prefix, serialized, TOML/JSON/YAML file, one's own with or without source and interpolater) in four profiles at keys of 1..12 odd components against the whole message; non-trivial: the error has a key or a source, or the path is absolute");
    for _ in 0..c.scale(4000, 60000) {
        let mut r = Rng(c.rng.next());
        let (k, want) = kind(&mut r);
        c.case(format!("{:?}", k), false);
        c.eq("the kind", want.clone(), k.to_string());
        c.eq("as an error", want, Error::from(k).to_string());
        let l = names(&mut r);
        c.eq("alternatives", alternatives(l), OneOf(l).to_string());
        if c.full() { return; }
    }
    let s = Scratch::new("says");
    made(c);
    notation(c, &s.0);
    if c.full() { return; }
    paths(c, &s.0);
    if c.full() { return; }
    providers(c, &s.0);
}

//! C15 (containment) and C16 (restoration).  Everything runs in a child process
//! under an unprivileged user whose only writable place is a scratch directory.
use crate::util::*;
use figment::error::Result as FResult;
use figment::Jail;
use serde_json::Value as J;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::fs::PermissionsExt;
use std::path::{Component, Path, PathBuf};

const UID: u32 = 61234;

/// run the property in a child process as an unprivileged user
pub fn contained(c: &mut Ctx, prop: &str) {
    use std::os::unix::process::CommandExt;
    let root = PathBuf::from(format!("/tmp/figjail-{}-{}", prop, std::process::id()));
    let _ = std::fs::remove_dir_all(&root);
    for d in ["tmp", "outside", "outside/sub"] { std::fs::create_dir_all(root.join(d)).unwrap(); }
    std::fs::write(root.join("outside/f"), "keep").unwrap();
    let exe = root.join("harness");
    std::fs::copy(std::env::current_exe().unwrap(), &exe).unwrap();
    std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).unwrap();
    for d in ["", "tmp", "outside", "outside/sub", "outside/f"] { let _ = std::os::unix::fs::chown(root.join(d), Some(UID), Some(UID)); }
    let trace = root.join("trace");
    std::fs::write(&trace, "").unwrap();
    let _ = std::os::unix::fs::chown(&trace, Some(UID), Some(UID));
    let mut cmd = std::process::Command::new(&exe);
    cmd.args(["--jail", prop, &c.seed.to_string(), if c.thorough { "thorough" } else { "quick" }, root.to_str().unwrap()]).current_dir(root.join("outside/sub"))
        .env("TMPDIR", root.join("tmp")).env("HARNESS_TRACE", &trace).env("FIG_PRE", "pre").env("FIG_EMPTY", "").env("FIG_BIN", { use std::os::unix::ffi::OsStringExt; OsString::from_vec(vec![b'x', 0xff]) });
    cmd.env({ use std::os::unix::ffi::OsStringExt; OsString::from_vec(b"FIG_\xfe".to_vec()) }, "odd name");
    if unsafe { geteuid() } == 0 { cmd.uid(UID).gid(UID); }
    let o = cmd.output().unwrap();
    let line = String::from_utf8_lossy(&o.stdout).lines().rev().find(|l| l.starts_with('{')).map(|s| s.to_string());
    match line.and_then(|l| serde_json::from_str::<J>(&l).ok()) {
        Some(j) if o.status.success() => {
            c.merge(&j);
            let left: Vec<_> = std::fs::read_dir(root.join("tmp")).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
            if !left.is_empty() { c.violation("directories left behind", "after all jails were left", "none", &format!("{:?}", left)); }
        }
        _ => {
            let t = std::fs::read_to_string(&trace).unwrap_or_default();
            c.case(t.clone(), true);
            c.violation("the process was aborted", &t, "no abort", &format!("{:?}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>()));
        }
    }
    let _ = std::fs::remove_dir_all(&root);
}
extern "C" { fn geteuid() -> u32; }

pub fn child(a: &[String]) -> ! {
    let mut c = Ctx::new(&a[0], a[1].parse().unwrap(), a[2] == "thorough");
    watchdog(60);
    std::panic::set_hook(Box::new(|_| {}));
    let root = PathBuf::from(&a[3]);
    if unsafe { geteuid() } == 0 { eprintln!("refusing to run as root"); std::process::exit(3); }
    if a[0] == "C15" { run15(&mut c, &root) } else { run16(&mut c, &root) }
    c.print();
    std::process::exit(0)
}

/// everything below `p` except `skip`: path -> contents or "dir"
fn snap(p: &Path, skip: &Path) -> BTreeMap<PathBuf, String> {
    let mut o = BTreeMap::new();
    let mut todo = vec![p.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap().flatten() {
            let q = e.path();
            if q == skip || q.ends_with("trace") || q.ends_with("harness") { continue; }
            if q.is_dir() { o.insert(q.clone(), "dir".into()); todo.push(q); } else { o.insert(q.clone(), std::fs::read_to_string(&q).unwrap_or_default()); }
        }
    }
    o
}
/// the documented normalisation: `.` dropped, `..` removes the previous component and stops at the root
fn dedot(p: &Path) -> PathBuf {
    let mut st: Vec<&std::ffi::OsStr> = vec![];
    let abs = p.has_root();
    for c in p.components() { match c { Component::Normal(s) => st.push(s), Component::ParentDir => { st.pop(); } _ => {} } }
    let mut o = if abs { PathBuf::from("/") } else { PathBuf::new() };
    for s in st { o.push(s); }
    o
}

fn run15(c: &mut Ctx, root: &Path) {
    c.rule("random sequences of 1..8 jail operations (create_file, create_binary, create_dir, change_dir) on paths of up to 9 components mixing names, `.`, `..`, repeated and trailing separators, relative or absolute inside and outside the jail (also through the jail's own name, prefixes of it, and siblings); nothing outside may change, the working directory stays inside, returned paths are the lexical normalisation, and locations inside the jail are accepted; non-trivial: the path contains `..` or is absolute");
    for _ in 0..c.scale(2500, 60000) {
        let mut r = Rng(c.rng.next());
        let mut stop = false;
        let res = Jail::try_with(|j| {
            let dir = j.directory().to_path_buf();
            let before = snap(root, &dir);
            let name = dir.file_name().unwrap().to_str().unwrap().to_string();
            let mut hist: Vec<String> = vec![];
            let n = 1 + r.below(8);
            for _ in 0..n {
                let cwd = std::env::current_dir().unwrap();
                let odd = r.odd_name();
                let names = ["a", "b", "c.txt", &odd, "...", "é", &name, "x y"];
                let k = r.size(10, 40);
                let mut p: String = match r.below(10) { 0 | 1 => format!("{}/", dir.display()), 2 => format!("{}/../", dir.display()), 3 => "/".into(), 4 => format!("{}x/", dir.display()), 5 => format!("{}/", root.join("outside").display()), 6 => format!("{}//.//", dir.display()), _ => String::new() };
                for i in 0..k { if i > 0 { p += ["/", "/", "/", "//", "/./"][r.below(5)]; } p += match r.below(7) { 0 | 1 => "..", 2 => ".", _ => names[r.below(names.len())] }; }
                if r.chance(1, 6) { p.push('/'); }
                let path = PathBuf::from(&p);
                let norm = dedot(&path);
                let target = if norm.is_absolute() { norm.clone() } else { cwd.join(&norm) };
                let inside = target.starts_with(&dir);
                let op = r.below(4);
                let opn = ["create_file", "create_binary", "create_dir", "change_dir"][op];
                let shown = |s: &str| s.replace(dir.to_str().unwrap(), "<jail>").replace(root.to_str().unwrap(), "<scratch>").replace(&name, "<name>");
                hist.push(format!("{}({:?})", opn, shown(&p)));
                c.case(format!("in {}: {}", shown(cwd.to_str().unwrap()), hist.join("; ")), p.contains("..") || path.is_absolute());
                let parent_ok = target.parent().map_or(false, |q| q.is_dir());
                let (was_dir, was_file) = (target.is_dir(), target.is_file());
                let blocked = target.ancestors().any(|a| a.is_file());
                let out: Result<Option<PathBuf>, String> = match op {
                    0 => j.create_file(&p, "data").map(|_| None).map_err(|e| e.to_string()),
                    1 => j.create_binary(&p, b"da\xffta").map(|_| None).map_err(|e| e.to_string()),
                    2 => j.create_dir(&p).map(Some).map_err(|e| e.to_string()),
                    _ => j.change_dir(&p).map(Some).map_err(|e| e.to_string()),
                };
                let possible = match op { 0 | 1 => parent_ok && !was_dir, 2 => !blocked, _ => was_dir };
                // a location inside the jail is accepted
                let trailing = (op == 0 || op == 1) && (p.ends_with('/') || p.is_empty());
                if inside && possible && !trailing { c.check("a location inside the jail is accepted", out.is_ok(), || format!("accepted: {}", shown(target.to_str().unwrap())), || format!("{:?}", out)); }
                if !inside { c.check("a location outside the jail is refused", out.is_err(), || format!("refused: {}", shown(target.to_str().unwrap())), || format!("{:?}", out)); }
                if let Ok(o) = &out {
                    match op {
                        0 => { c.check("the file is where its path says", std::fs::read(&target).ok().as_deref() == Some(&b"data"[..]), || shown(target.to_str().unwrap()), || "no such contents".into()); }
                        1 => { c.check("the file is where its path says", std::fs::read(&target).ok().as_deref() == Some(&b"da\xffta"[..]), || shown(target.to_str().unwrap()), || "no such contents".into()); }
                        2 => { c.check("the directory is where its path says", target.is_dir(), || shown(target.to_str().unwrap()), || "not there".into()); }
                        _ => { c.eq("the working directory", target.clone(), std::env::current_dir().unwrap()); }
                    }
                    if let Some(q) = o { c.check("the returned path is the normalisation", dedot(q) == norm && !q.components().any(|x| x == Component::ParentDir), || shown(norm.to_str().unwrap()), || shown(q.to_str().unwrap())); }
                }
                let _ = was_file;
                let now = std::env::current_dir();
                if !c.check("the working directory stays inside", now.as_ref().map_or(false, |d| d.starts_with(&dir)), || "inside".into(), || format!("{:?}", now)) { stop = true; }
                let after = snap(root, &dir);
                if !c.check("nothing outside the jail changes", before == after, || format!("{:?}", before.keys().collect::<Vec<_>>()), || shown(&format!("{:?}", after))) { stop = true; }
                if stop || c.full() { stop = true; break; }
            }
            Ok(())
        });
        if let Err(e) = res { c.check("the jail itself", false, || "ok".into(), || e.to_string()); }
        if stop { break; }
    }
}

fn envs() -> BTreeMap<OsString, OsString> { std::env::vars_os().collect() }
#[derive(Clone, Debug)]
enum Step { Set(String, String), Clear, Dir(&'static str), Chdir(&'static str), File(&'static str) }

fn run16(c: &mut Ctx, root: &Path) {
    c.rule("random histories of 0..12 steps (set_env of new, existing, repeated and unusual names with string or number values, clear_env any number of times, files, directories, changes of directory) ended by return, error or panic; the environment inside follows the steps, and afterwards the environment, the working directory and the absence of the jail directory are compared with the state before; invalid names and values must end like a panic; non-trivial: at least two steps");
    let home = std::env::current_dir().unwrap();
    // names that cannot be set at all
    for (k, v) in [("", "x"), ("A=B", "x"), ("=", "x"), ("NUL\0", "x"), ("OK", "va\0lue"), ("FIG_PRE", "\0")] {
        for first in [false, true] {
            c.case(format!("set_env({:?}, {:?}){}", k, v, if first { " after other changes" } else { "" }), true);
            let before = envs();
            let mut dir = PathBuf::new();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Jail::try_with(|j| { dir = j.directory().into(); if first { j.set_env("OK", 1); j.set_env("FIG_PRE", 2); j.clear_env(); j.set_env("FIG_PRE", 3); } j.set_env(k, v); Ok(()) }).is_ok()));
            let _ = r;
            c.eq("the environment", before, envs());
            c.eq("the working directory", home.clone(), std::env::current_dir().unwrap_or_default());
            c.check("the jail directory is gone", !dir.exists(), || "gone".into(), || dir.display().to_string());
        }
    }
    for _ in 0..c.scale(4000, 80000) {
        let mut r = Rng(c.rng.next());
        let n = r.size(13, 60);
        let odd = format!("{}{}", if r.chance(1, 2) { "FIG_" } else { "" }, r.odd_name());
        let keys = [&*odd, "FIG_PRE", "FIG_EMPTY", "FIG_BIN", "FIG_NEW", "fig_pre", "FIG É", "PATH", "FIG_NEW2", "HOME"];
        let steps: Vec<Step> = (0..n).map(|_| match r.below(12) { 0 => Step::Clear, 1 => Step::Dir("d/e"), 2 => Step::Chdir("d/e"), 3 => Step::File("f"), 4 => Step::Chdir("/"), _ => { let k = r.pick(&keys).to_string(); Step::Set(k, if r.chance(1, 6) { r.odd_text().replace('\0', "") } else { ["", "1", "val ue", "é", "a=b"][r.below(5)].to_string() }) } }).collect();
        let exit = r.below(3);
        let by = r.below(12);
        c.case(format!("{:?}, {}then {}", steps, ["", "chdir out of the jail, ", "remove the working directory, ", "remove the jail directory, ", "chdir to a new directory, "].get(by).unwrap_or(&""), ["return", "error", "panic"][exit]), n >= 2);
        let before = envs();
        let mut model = before.clone();
        let mut dir = PathBuf::new();
        let mut bad: Option<String> = None;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> FResult<()> {
            Jail::try_with(|j| {
                dir = j.directory().to_path_buf();
                if std::env::current_dir().ok().as_ref() != Some(&dir) { bad = Some("does not start in the jail directory".into()); }
                for s in &steps {
                    match s {
                        Step::Set(k, v) => { if v == "1" { j.set_env(k, 1) } else { j.set_env(k, v) } model.insert(k.into(), v.into()); }
                        Step::Clear => { j.clear_env(); model.clear(); }
                        Step::Dir(d) => { let _ = j.create_dir(d); }
                        Step::Chdir(d) => { let _ = j.change_dir(d); }
                        Step::File(f) => { let _ = j.create_file(f, "x"); }
                    }
                    if model != envs() && bad.is_none() { bad = Some(format!("environment after {:?}: {:?}, expected {:?}", s, envs(), model)); }
                }
                // what the body does besides the jail's own operations
                match by {
                    1 => { let _ = std::env::set_current_dir(root); }
                    2 => { let _ = std::fs::create_dir_all(dir.join("gone/x")); let _ = std::env::set_current_dir(dir.join("gone/x")); let _ = std::fs::remove_dir_all(dir.join("gone")); }
                    3 => { let _ = std::fs::remove_dir_all(&dir); }
                    4 => { let _ = std::fs::create_dir_all(dir.join("d/e/f")); let _ = std::env::set_current_dir(dir.join("d/e/f")); let _ = std::fs::write("f", "x"); }
                    _ => {}
                }
                match exit { 0 => Ok(()), 1 => Err("failed".to_string().into()), _ => panic!("leaving") }
            })
        }));
        c.check("inside the jail", bad.is_none(), || "follows the steps".into(), || bad.clone().unwrap());
        c.check("the outcome of the closure", match (exit, &res) { (0, Ok(Ok(()))) => true, (1, Ok(Err(e))) => e.to_string().contains("failed"), (2, Err(_)) => true, _ => false }, || ["Ok", "Err", "panic"][exit].into(), || format!("{:?}", res.as_ref().map_err(|_| "panic")));
        let after = envs();
        c.check("the environment is restored", after == before, || format!("{:?}", before), || format!("{:?}", after.iter().filter(|(k, v)| before.get(*k) != Some(v)).chain(before.iter().filter(|(k, _)| !after.contains_key(*k))).collect::<Vec<_>>()));
        c.eq("the working directory is restored", home.clone(), std::env::current_dir().unwrap_or_default());
        c.check("the jail directory is gone", !dir.exists(), || "gone".into(), || dir.display().to_string());
        // a difference must not spill into the next case
        for (k, _) in &after { if !before.contains_key(k) { std::env::remove_var(k); } }
        for (k, v) in &before { std::env::set_var(k, v); }
        let _ = std::env::set_current_dir(&home);
        if c.full() { break; }
    }
    let _ = root;
}

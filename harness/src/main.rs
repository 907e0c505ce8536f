//! Executable counterpart of the contracts: searches for (and replays) inputs
//! on which the real code disagrees with the specification of a property.
//! Used as counterexample search for rejected obligations, and as the labelled
//! *bounded* stand-in for functions the verifier cannot take.
#![allow(clippy::all)]
mod util;
mod tree;
mod trees;
mod tags;
mod errs;
mod paths;
mod parse;
mod envs;
mod shapes;
mod serial;
mod magic;
mod jails;
mod files;
mod nums;
mod blame;
mod says;
mod helps;

use util::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("--parse-deep") { parse::deep(&a[2], &a[3], a[4].parse().unwrap()); }
    if a.get(1).map(|s| s.as_str()) == Some("--jail") { jails::child(&a[2..]); }
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = a.get(3).cloned().unwrap_or_else(|| "quick".into());
    let mut c = Ctx::new(&prop, seed, tier == "thorough");
    util::watchdog(60);
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match prop.as_str() {
        "C01" | "C02" | "C03" | "C19" => trees::run(&mut c, &prop),
        "C04" => tags::run(&mut c),
        "C05" => errs::run(&mut c),
        "C06" => paths::run6(&mut c),
        "C07" => paths::run7(&mut c),
        "C08" => parse::run8(&mut c),
        "C21" => parse::run21(&mut c),
        "C09" => envs::run(&mut c),
        "C13" => blame::run(&mut c),
        "C11" => nums::run11(&mut c),
        "C12" => nums::run12(&mut c),
        "C14" => files::run(&mut c),
        "C15" | "C16" => jails::contained(&mut c, &prop),
        "C17" => magic::run17(&mut c),
        "C18" => magic::run18(&mut c),
        "C20" => magic::run20(&mut c),
        "C10" => serial::run(&mut c),
        "C22" => says::run(&mut c),
        "C23" => helps::run(&mut c),
        p => panic!("unknown property {}", p),
    }));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        c.violation("panic escaping a property run", &c.current.clone(), "no panic", &m);
    }
    c.print();
}

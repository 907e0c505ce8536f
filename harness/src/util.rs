use serde_json::{json, Value as J};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..8 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
}

/// Texts, characters and sizes worth trying: unusual ones, and the literals that the code under test
/// has more often than the code the specifications were written for (HARNESS_DICT, written by check.py).
pub struct Atoms { pub strs: Vec<String>, pub chars: Vec<char>, pub ints: Vec<u128> }
pub fn atoms() -> &'static Atoms {
    static A: std::sync::OnceLock<Atoms> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let j: J = std::env::var("HARNESS_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(J::Null);
        let strs: Vec<String> = j["strs"].as_array().into_iter().flatten().filter_map(|v| v.as_str().map(String::from)).collect();
        let chars = strs.iter().filter(|s| s.chars().count() == 1).filter_map(|s| s.chars().next())
            .chain(j["chars"].as_array().into_iter().flatten().filter_map(|v| v.as_str().and_then(|s| s.chars().next()))).collect();
        Atoms { strs, chars, ints: j["ints"].as_array().into_iter().flatten().filter_map(|v| v.as_str().and_then(|s| s.parse().ok())).collect() }
    })
}
pub const ODD: [&str; 34] = ["", " ", "a ", " a", "A", "a b", "\u{e9}", "\u{c9}", "\u{df}", "\u{feff}x", "x\0", "\u{130}", "\u{212a}", "0", "01", "-1", "1.5", "true", "FALSE", "yes", "null", "none",
    "default", "global", "Default", "~", "a-b", "_", "__", "\u{1f980}", "a\nb", "\t", "tag", "\u{201c}q\u{201d}"];
impl Rng {
    /// an unusual text without dots
    pub fn odd(&mut self) -> String { self.odd_text().replace('.', "") }
    /// a word one edit away from `w`, or with a tail
    pub fn near(&mut self, w: &str) -> String {
        let mut cs: Vec<char> = w.chars().collect();
        let i = self.below(cs.len() + 1);
        let x = *self.pick(&['s', '-', '_', '1', ' ', 'a', 'X', '\u{e9}', '/', ':']);
        match self.below(6) {
            0 => cs.push(x),
            1 => cs.insert(0, x),
            2 => cs.insert(i, x),
            3 => { cs.pop(); }
            4 => if i < cs.len() { cs.remove(i); },
            _ => { let n = self.below(4); for _ in 0..n { cs.push(x); } cs.extend(w.chars()); }
        }
        cs.into_iter().collect()
    }
    /// an unusual text
    pub fn odd_text(&mut self) -> String {
        let a = atoms();
        if !a.strs.is_empty() && self.chance(1, 2) {
            let s = self.pick(&a.strs).clone();
            return match self.below(8) { 0 => format!("{}a", s), 1 => format!("a{}", s), 2 => s.to_uppercase(), 3 => format!("a{}b", s), 4 => format!("{}{}", s, s), 5 => s.to_lowercase(), _ => s };
        }
        if !a.chars.is_empty() && self.chance(1, 2) {
            let ch = *self.pick(&a.chars);
            return match self.below(5) { 0 => format!("{}a", ch), 1 => format!("a{}", ch), 2 => format!("a{}b", ch), 3 => format!("{}{}", ch, ch), _ => ch.to_string() };
        }
        match self.below(20) {
            0 => "k".repeat(1 + self.below(70)),
            1 => { let (a, b) = (*self.pick(&ODD), *self.pick(&ODD)); format!("{}{}", a, b) }
            2 => self.below(40).to_string(),
            _ => self.pick(&ODD).to_string(),
        }
    }
    /// an unusual name for a file or a variable
    pub fn odd_name(&mut self) -> String {
        let s: String = self.odd_text().chars().filter(|c| !matches!(c, '/' | '\0' | '=')).take(60).collect();
        if s.is_empty() || s == ".." || s == "." { "odd".into() } else { s }
    }
    pub fn odd_char(&mut self) -> char {
        let a = atoms();
        if !a.chars.is_empty() && self.chance(1, 2) { return *self.pick(&a.chars); }
        *self.pick(&['a', 'A', '0', ' ', '\u{e9}', '\0', '\n', '\t', '"', '\'', '\\', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{feff}', '\u{fffd}', '\u{10ffff}', '\u{2028}', '\u{1f980}', '_', '.', ',', '\u{7ff}', '\u{800}', '\u{ffff}'])
    }
    /// mostly a size below `usual`, now and then one up to `max`
    pub fn size(&mut self, usual: usize, max: usize) -> usize {
        let a = atoms();
        if !a.ints.is_empty() && self.chance(1, 15) {
            let n = *self.pick(&a.ints);
            if n < 400 { return (n as usize + self.below(3)).saturating_sub(1).min(max.max(40)); }
        }
        if self.chance(1, 12) { self.below(max + 1) } else { self.below(usual) }
    }
    /// a number near one of the literals, if there is any
    pub fn odd_int(&mut self) -> Option<u128> {
        let a = atoms();
        if a.ints.is_empty() { return None; }
        let n = *self.pick(&a.ints);
        Some(match self.below(4) { 0 => n.wrapping_add(1), 1 => n.wrapping_sub(1), _ => n })
    }
}

/// State of one property run: counts, samples and violations.
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub rules: Vec<String>,
    pub samples: Vec<String>,
    pub violations: Vec<J>,
    pub current: String,
    pub exhaustive: Vec<String>,
    trace: Option<String>,
    child_distinct: u64,
}

pub static CURRENT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub static BEAT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// a case that does not come to an end is reported as a violation
pub fn watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(std::sync::atomic::Ordering::Relaxed);
            if b != last { last = b; since = std::time::Instant::now(); continue; }
            if b > 0 && since.elapsed().as_secs() > limit_s {
                let cur = CURRENT.lock().unwrap().clone();
                println!("{}", json!({ "evaluations": b, "distinct_nontrivial": 1, "rule": "watchdog", "samples": [cur.clone()], "exhaustive_parts": [],
                    "violations": [{ "what": "did not terminate", "input": cur, "expected": "termination", "actual": format!("still running after {} s", limit_s) }] }));
                std::process::exit(0);
            }
        }
    });
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Ctx {
        Ctx { prop: prop.into(), seed, thorough, rng: Rng::new(seed), evaluations: 0, distinct: HashSet::new(), rules: vec![],
            samples: vec![], violations: vec![], current: String::new(), exhaustive: vec![], trace: std::env::var("HARNESS_TRACE").ok(), child_distinct: 0 }
    }
    pub fn rule(&mut self, s: &str) { self.rules.push(s.into()); }
    pub fn exh(&mut self, s: &str) { self.exhaustive.push(s.into()); }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else if matches!(&*self.prop, "C02" | "C03" | "C19" | "C17") { quick } else { (quick * 4).min(thorough) } }
    /// note one evaluated case
    pub fn case(&mut self, desc: impl Into<String>, nontrivial: bool) {
        self.current = desc.into();
        if let Some(p) = &self.trace { let _ = std::fs::write(p, &self.current); }
        *CURRENT.lock().unwrap() = self.current.clone();
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            self.current.hash(&mut h);
            self.distinct.insert(h.finish());
            if self.samples.len() < 3 || (self.samples.len() < 8 && self.evaluations % 997 == 0) { self.samples.push(self.current.chars().take(400).collect()); }
        }
    }
    pub fn violation(&mut self, what: &str, input: &str, expected: &str, actual: &str) {
        if self.violations.len() < 20 {
            self.violations.push(json!({ "what": what, "input": input, "expected": expected, "actual": actual }));
        }
    }
    pub fn check(&mut self, what: &str, ok: bool, expected: impl Fn() -> String, actual: impl Fn() -> String) -> bool {
        if !ok { let i = self.current.clone(); self.violation(what, &i, &expected(), &actual()); }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, expected: T, actual: T) -> bool {
        let ok = expected == actual;
        self.check(what, ok, || format!("{:?}", expected), || format!("{:?}", actual))
    }
    /// take over the result of a child process
    pub fn merge(&mut self, j: &J) {
        self.evaluations += j["evaluations"].as_u64().unwrap_or(0);
        self.child_distinct += j["distinct_nontrivial"].as_u64().unwrap_or(0);
        let strs = |k: &str| j[k].as_array().into_iter().flatten().filter_map(|v| v.as_str().map(|s| s.to_string())).collect::<Vec<_>>();
        self.samples.extend(strs("samples"));
        self.exhaustive.extend(strs("exhaustive_parts"));
        if let Some(s) = j["rule"].as_str() { self.rules.push(s.into()); }
        for v in j["violations"].as_array().into_iter().flatten() { if self.violations.len() < 20 { self.violations.push(v.clone()); } }
    }
    pub fn full(&self) -> bool { self.violations.len() >= 20 }
    pub fn print(&self) {
        println!("{}", json!({
            "evaluations": self.evaluations, "distinct_nontrivial": self.distinct.len() as u64 + self.child_distinct, "rule": self.rules.join("; "),
            "samples": self.samples, "violations": self.violations, "exhaustive_parts": self.exhaustive,
        }));
    }
}

/// run `f`, reporting a panic as a violation
pub fn guard<T>(c: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let i = c.current.clone();
            c.violation(&format!("{}: panicked", what), &i, "no panic", &m);
            None
        }
    }
}
